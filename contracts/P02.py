"""Image sizes: padding is minimal, bottom/right only, and the sizes needed to undo it travel with the strings."""
import torch
import torch.nn.functional as F
from neuralcompression import HyperpriorCompressedOutput


@contract("neuralcompression.functional.pad_image_to_factor", rank=4)
def pad(image, factor, mode="reflect"):
    """Height and width grow to the next multiple of the factor (never more), by padding bottom and right
    only; the original (height, width) is returned with the image."""
    h, w = image.shape[-2:]
    return F.pad(image, (0, -w % factor, 0, -h % factor), mode=mode), (h, w)


@contract("neuralcompression.models.HiFiCAutoencoder.compress", rank=4, facets=["return.image_size,padded_size"])
def sizes(self, image, force_cpu=True):
    """image_size is the caller's (height, width), padded_size that of the image actually coded."""
    ASSUME(all(p.device == torch.device("cpu") for p in self.parameters()))
    h, w = image.shape[-2:]
    padded = F.pad(image, (0, -w % 64, 0, -h % 64), mode="reflect")
    return HyperpriorCompressedOutput(None, None, (h, w), (padded.shape[-2], padded.shape[-1]))


@contract("neuralcompression.models.HiFiCAutoencoder.factor")
def factor(self):
    return 64
