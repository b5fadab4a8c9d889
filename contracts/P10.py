"""Video motion: coarse-to-fine flow and motion compensation."""
import torch
import torch.nn as nn
import torch.nn.functional as F
import neuralcompression.functional as ncF


@contract("neuralcompression.models.deep_video_compression.DVCPyramidFlowEstimator.calculate_flow_with_image_pairs", cases=[{"ctor.levels": 1},{"ctor.levels": 3}])
def pyr(self, image1, image2):
    """One flow update per level, coarsest first, each on its own average-pooled pair and the upsampled previous flow; image pairs of all levels are returned; unequal shapes are refused."""
    if image1.shape != image2.shape:
        raise ValueError
    n = len(self.model_levels)
    a, b = [image1], [image2]
    for i in range(n - 1):
        a = a + [F.avg_pool2d(a[i], 2)]
        b = b + [F.avg_pool2d(b[i], 2)]
    flow = torch.zeros_like(a[-1])[:, :2]
    pairs = []
    for i in range(n):
        x, y = a[n - 1 - i], b[n - 1 - i]
        flow = F.interpolate(flow, x.shape[2:], mode="bilinear")
        flow = flow + self.model_levels[i](torch.cat((ncF.dense_image_warp(x, flow.permute(0, 2, 3, 1)), y, flow), dim=1))
        pairs.append((ncF.dense_image_warp(x, flow.permute(0, 2, 3, 1)), y))
    return flow, pairs


@contract("neuralcompression.models.deep_video_compression.DVCPyramidFlowEstimator.forward", cases=[{"ctor.levels": 2}], facets=["return"])
def pyr_forward(self, image1, image2):
    """The plain call is the flow of the finest level."""
    return self.calculate_flow_with_image_pairs(image1, image2)[0]


@contract("neuralcompression.models.deep_video_compression.DVCPyramidFlowEstimator", facets=["attrs"], only=["model_levels"], cases=[{"levels": 2, "filter_counts": None}, {"levels": 1, "filter_counts": [5, 2]}])
def pyr_ctor(self, in_channels=8, filter_counts=None, kernel_size=7, levels=5):
    """One independent network per level; ReLU between convolutions but none after the last (flow is signed)."""
    super().__init__()
    counts = [32, 64, 32, 16, 2] if filter_counts is None else filter_counts
    nets = []
    for _ in range(levels):
        c, ls = in_channels, []
        for n in counts[:-1]:
            ls += [nn.Conv2d(c, n, kernel_size=kernel_size, padding=kernel_size // 2), nn.ReLU()]
            c = n
        ls += [nn.Conv2d(c, counts[-1], kernel_size=kernel_size, padding=kernel_size // 2)]
        nets.append(nn.Sequential(*ls))
    self.model_levels = nn.ModuleList(nets)


@contract("neuralcompression.models.deep_video_compression.DVCMotionCompensationModel.forward")
def mc_forward(self, image1, image2, flow):
    """Compensation sees base image, warped image and flow, in that order."""
    return self.model(torch.cat((image1, image2, flow), dim=1))


@contract("neuralcompression.models.deep_video_compression._MotionCompensationLayer.forward", rank=4)
def mc_layer(self, image):
    """The coarser level is brought back to exactly this level's size."""
    y = self.input_block(image)
    if self.child is not None:
        y = y + F.interpolate(self.child(F.avg_pool2d(y, 2)), size=(image.shape[2], image.shape[3]), mode="nearest")
    return self.output_block(y)


@contract("neuralcompression.models.deep_video_compression._ResidualBlock.forward")
def mc_res(self, image):
    return image + self.block(image)
