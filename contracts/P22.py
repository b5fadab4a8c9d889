"""Model zoo and hub entry points."""
import torch
from neuralcompression.models import HiFiCAutoencoder, VqVaeXCiTAutoencoder
from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck

OPQ = ("neuralcompression.models.HiFiCAutoencoder", "neuralcompression.models.VqVaeXCiTAutoencoder", "neuralcompression.layers.NormalizeLatent",
       "neuralcompression.layers.ProjectLatent", "neuralcompression.layers.VQBottleneck")
BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"


def load(m, name):
    m.load_state_dict(torch.hub.load_state_dict_from_url("https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/" + name + ".ckpt", map_location="cpu"))
    return m


def hific(pretrained, name):
    return load(HiFiCAutoencoder(), name) if pretrained is True else HiFiCAutoencoder()


@contract("neuralcompression.zoo.msillm_quality_vlo1", opaque=OPQ)
def zoo_msillm_vlo1(pretrained=False, **kwargs):
    """0.00218 bits per pixel."""
    return hific(pretrained, "msillm_target_0.00218bpp")


@contract("hubconf.msillm_quality_vlo1", opaque=OPQ)
def hub_msillm_vlo1(pretrained=True, **kwargs):
    """0.00218 bits per pixel."""
    return hific(pretrained, "msillm_target_0.00218bpp")


@contract("neuralcompression.zoo.msillm_quality_vlo2", opaque=OPQ)
def zoo_msillm_vlo2(pretrained=False, **kwargs):
    """0.00438 bits per pixel."""
    return hific(pretrained, "msillm_target_0.00438bpp")


@contract("hubconf.msillm_quality_vlo2", opaque=OPQ)
def hub_msillm_vlo2(pretrained=True, **kwargs):
    """0.00438 bits per pixel."""
    return hific(pretrained, "msillm_target_0.00438bpp")


@contract("neuralcompression.zoo.msillm_quality_1", opaque=OPQ)
def zoo_msillm_1(pretrained=False, **kwargs):
    """0.035 bits per pixel."""
    return hific(pretrained, "msillm_target_0.035bpp")


@contract("hubconf.msillm_quality_1", opaque=OPQ)
def hub_msillm_1(pretrained=True, **kwargs):
    """0.035 bits per pixel."""
    return hific(pretrained, "msillm_target_0.035bpp")


@contract("neuralcompression.zoo.msillm_quality_2", opaque=OPQ)
def zoo_msillm_2(pretrained=False, **kwargs):
    """0.07 bits per pixel."""
    return hific(pretrained, "msillm_target_0.07bpp")


@contract("hubconf.msillm_quality_2", opaque=OPQ)
def hub_msillm_2(pretrained=True, **kwargs):
    """0.07 bits per pixel."""
    return hific(pretrained, "msillm_target_0.07bpp")


@contract("neuralcompression.zoo.msillm_quality_3", opaque=OPQ)
def zoo_msillm_3(pretrained=False, **kwargs):
    """0.14 bits per pixel."""
    return hific(pretrained, "msillm_target_0.14bpp")


@contract("hubconf.msillm_quality_3", opaque=OPQ)
def hub_msillm_3(pretrained=True, **kwargs):
    """0.14 bits per pixel."""
    return hific(pretrained, "msillm_target_0.14bpp")


@contract("neuralcompression.zoo.msillm_quality_4", opaque=OPQ)
def zoo_msillm_4(pretrained=False, **kwargs):
    """0.3 bits per pixel."""
    return hific(pretrained, "msillm_target_0.3bpp")


@contract("hubconf.msillm_quality_4", opaque=OPQ)
def hub_msillm_4(pretrained=True, **kwargs):
    """0.3 bits per pixel."""
    return hific(pretrained, "msillm_target_0.3bpp")


@contract("neuralcompression.zoo.msillm_quality_5", opaque=OPQ)
def zoo_msillm_5(pretrained=False, **kwargs):
    """0.45 bits per pixel."""
    return hific(pretrained, "msillm_target_0.45bpp")


@contract("hubconf.msillm_quality_5", opaque=OPQ)
def hub_msillm_5(pretrained=True, **kwargs):
    """0.45 bits per pixel."""
    return hific(pretrained, "msillm_target_0.45bpp")


@contract("neuralcompression.zoo.msillm_quality_6", opaque=OPQ)
def zoo_msillm_6(pretrained=False, **kwargs):
    """0.9 bits per pixel."""
    return hific(pretrained, "msillm_target_0.9bpp")


@contract("hubconf.msillm_quality_6", opaque=OPQ)
def hub_msillm_6(pretrained=True, **kwargs):
    """0.9 bits per pixel."""
    return hific(pretrained, "msillm_target_0.9bpp")


@contract("neuralcompression.zoo.noganms_quality_1", opaque=OPQ)
def zoo_noganms_1(pretrained=False, **kwargs):
    """0.035 bits per pixel."""
    return hific(pretrained, "noganms_target_0.035bpp")


@contract("hubconf.noganms_quality_1", opaque=OPQ)
def hub_noganms_1(pretrained=True, **kwargs):
    """0.035 bits per pixel."""
    return hific(pretrained, "noganms_target_0.035bpp")


@contract("neuralcompression.zoo.noganms_quality_2", opaque=OPQ)
def zoo_noganms_2(pretrained=False, **kwargs):
    """0.07 bits per pixel."""
    return hific(pretrained, "noganms_target_0.07bpp")


@contract("hubconf.noganms_quality_2", opaque=OPQ)
def hub_noganms_2(pretrained=True, **kwargs):
    """0.07 bits per pixel."""
    return hific(pretrained, "noganms_target_0.07bpp")


@contract("neuralcompression.zoo.noganms_quality_3", opaque=OPQ)
def zoo_noganms_3(pretrained=False, **kwargs):
    """0.14 bits per pixel."""
    return hific(pretrained, "noganms_target_0.14bpp")


@contract("hubconf.noganms_quality_3", opaque=OPQ)
def hub_noganms_3(pretrained=True, **kwargs):
    """0.14 bits per pixel."""
    return hific(pretrained, "noganms_target_0.14bpp")


@contract("neuralcompression.zoo.noganms_quality_4", opaque=OPQ)
def zoo_noganms_4(pretrained=False, **kwargs):
    """0.3 bits per pixel."""
    return hific(pretrained, "noganms_target_0.3bpp")


@contract("hubconf.noganms_quality_4", opaque=OPQ)
def hub_noganms_4(pretrained=True, **kwargs):
    """0.3 bits per pixel."""
    return hific(pretrained, "noganms_target_0.3bpp")


@contract("neuralcompression.zoo.noganms_quality_5", opaque=OPQ)
def zoo_noganms_5(pretrained=False, **kwargs):
    """0.45 bits per pixel."""
    return hific(pretrained, "noganms_target_0.45bpp")


@contract("hubconf.noganms_quality_5", opaque=OPQ)
def hub_noganms_5(pretrained=True, **kwargs):
    """0.45 bits per pixel."""
    return hific(pretrained, "noganms_target_0.45bpp")


@contract("neuralcompression.zoo.noganms_quality_6", opaque=OPQ)
def zoo_noganms_6(pretrained=False, **kwargs):
    """0.9 bits per pixel."""
    return hific(pretrained, "noganms_target_0.9bpp")


@contract("hubconf.noganms_quality_6", opaque=OPQ)
def hub_noganms_6(pretrained=True, **kwargs):
    """0.9 bits per pixel."""
    return hific(pretrained, "noganms_target_0.9bpp")


@contract("neuralcompression.zoo.vqvae_xcit_p8_ch64_cb1024_h8", opaque=OPQ)
def zoo_vqvae(pretrained=False, **kwargs):
    """The labelling autoencoder of the paper: patch 8, 64 channels, 1024 codes of length 8."""
    m = VqVaeXCiTAutoencoder(ch=64, out_ch=3, ch_mult=[1, 2, 2, 4], num_res_blocks=2, attn_resolutions=[32], dropout=0.0, resamp_with_conv=True, in_channels=3,
                             resolution=256, embed_dim=256, freeze_encoder=False, norm_type="channel",
                             bottleneck_op=ProjectLatent(input_dim=256, output_dim=8, child=NormalizeLatent(child=VQBottleneck(codebook_size=1024, vector_length=8))))
    return load(m, "vqvae_xcit_p8_ch64_cb1024_h8") if pretrained is True else m


@contract("hubconf.msillm_vqvae_xcit_p8_ch64_cb1024_h8", opaque=OPQ)
def hub_vqvae(pretrained=True, **kwargs):
    """The labelling autoencoder of the paper: patch 8, 64 channels, 1024 codes of length 8."""
    m = VqVaeXCiTAutoencoder(ch=64, out_ch=3, ch_mult=[1, 2, 2, 4], num_res_blocks=2, attn_resolutions=[32], dropout=0.0, resamp_with_conv=True, in_channels=3,
                             resolution=256, embed_dim=256, freeze_encoder=False, norm_type="channel",
                             bottleneck_op=ProjectLatent(input_dim=256, output_dim=8, child=NormalizeLatent(child=VQBottleneck(codebook_size=1024, vector_length=8))))
    return load(m, "vqvae_xcit_p8_ch64_cb1024_h8") if pretrained is True else m
