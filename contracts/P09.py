"""Video codec sizes: every strided layer is undone at exactly the size it was applied at."""
import torch
import torch.nn as nn
from neuralcompression.layers import SimplifiedGDN, SimplifiedInverseGDN


@contract("neuralcompression.models.deep_video_compression.DVCCompressionEncoder.forward")
def enc_forward(self, image):
    """The encoder reports the input size of each of its convolutions, in order."""
    sizes = []
    for layer in self.layers:
        if isinstance(layer, nn.Conv2d):
            sizes.append(image.shape)
        image = layer(image)
    return image, sizes


@contract("neuralcompression.models.deep_video_compression.DVCCompressionDecoder.forward")
def dec_forward(self, image, output_sizes=None):
    """The decoder consumes them last-in-first-out, one per transposed convolution, refuses any other number, and leaves the caller's list alone."""
    if output_sizes is not None:
        sizes = list(output_sizes)
        if sum(isinstance(l, nn.ConvTranspose2d) for l in self.layers) != len(sizes):
            raise ValueError
        for layer in self.layers:
            if isinstance(layer, nn.ConvTranspose2d):
                image = layer(image, sizes.pop())
            else:
                image = layer(image)
    else:
        for layer in self.layers:
            image = layer(image)
    return image


@contract("neuralcompression.models.deep_video_compression.DVCCompressionEncoder", facets=["attrs"], only=["layers"], cases=[{"num_conv_layers": 1}, {"num_conv_layers": 4, "use_gdn": True}, {"num_conv_layers": 3, "use_gdn": False}])
def encoder(self, in_channels=2, out_channels=128, filter_channels=128, kernel_size=3, stride=2, num_conv_layers=4, use_gdn=True):
    """num_conv_layers strided convolutions separated by normalisation."""
    super().__init__()
    p = kernel_size // 2
    ls, c = [], in_channels
    for _ in range(num_conv_layers - 1):
        ls.append(nn.Conv2d(c, filter_channels, kernel_size=kernel_size, padding=p, stride=stride, bias=True if use_gdn else False))
        if use_gdn:
            ls.append(SimplifiedGDN(filter_channels))
        else:
            ls.append(nn.BatchNorm2d(filter_channels))
            ls.append(nn.ReLU())
        c = filter_channels
    ls.append(nn.Conv2d(c, out_channels, kernel_size=kernel_size, padding=p, stride=stride, bias=True))
    self.layers = nn.ModuleList(ls)


@contract("neuralcompression.models.deep_video_compression.DVCCompressionDecoder", facets=["attrs"], only=["layers"], cases=[{"num_conv_layers": 1}, {"num_conv_layers": 4, "use_gdn": True}, {"num_conv_layers": 3, "use_gdn": False}])
def decoder(self, in_channels=128, out_channels=2, filter_channels=128, kernel_size=3, stride=2, num_conv_layers=4, use_gdn=True):
    """The same number of transposed convolutions with the same stride, separated by the inverse normalisation."""
    super().__init__()
    p = kernel_size // 2
    ls, c = [], in_channels
    for _ in range(num_conv_layers - 1):
        ls.append(nn.ConvTranspose2d(c, filter_channels, kernel_size=kernel_size, padding=p, stride=stride, bias=True if use_gdn else False))
        if use_gdn:
            ls.append(SimplifiedInverseGDN(filter_channels))
        else:
            ls.append(nn.BatchNorm2d(filter_channels))
            ls.append(nn.ReLU())
        c = filter_channels
    ls.append(nn.ConvTranspose2d(c, out_channels, kernel_size=kernel_size, padding=p, stride=stride, bias=True))
    self.layers = nn.ModuleList(ls)
