"""Video codec: encoder and decoder form the same prediction; sizes travel with the frame."""
import torch
import torch.nn as nn
import torch.nn.functional as F
import neuralcompression.functional as ncF
from neuralcompression.models.deep_video_compression import CompressedPFrame, DVCTrainOutput, DVCPyramidFlowEstimator, DVCCompressionEncoder, DVCCompressionDecoder, DVCMotionCompensationModel
from compressai.entropy_models import EntropyBottleneck


def predict(self, image1, flow):
    return self.motion_compensation(image1, ncF.dense_image_warp(image1, flow.permute(0, 2, 3, 1)), flow)


@contract("neuralcompression.models.DVC.compress")
def compress(self, image1, image2):
    """The residual is taken against the prediction formed from the *decoded* flow."""
    fl, fsz = self.motion_encoder(self.motion_estimator(image1, image2))
    cf = self.motion_entropy_bottleneck.compress(fl)
    flow = self.motion_decoder(self.motion_entropy_bottleneck.decompress(cf, fl.shape[-2:]), fsz)
    rl, rsz = self.residual_encoder(image2 - predict(self, image1, flow))
    return CompressedPFrame(cf, fsz, self.residual_entropy_bottleneck.compress(rl), rsz)


def latent_size(sizes):
    return (-(-sizes[-1][-2] // 2), -(-sizes[-1][-1] // 2))


@contract("neuralcompression.models.DVC.decompress")
def decompress(self, image1, compressed_pframe):
    """The decoder forms the same prediction from the decoded flow and adds the decoded residual."""
    c = compressed_pframe
    flow = self.motion_decoder(
        self.motion_entropy_bottleneck.decompress(c.compressed_flow, latent_size(c.flow_decomp_sizes)), c.flow_decomp_sizes)
    res = self.residual_decoder(
        self.residual_entropy_bottleneck.decompress(c.compressed_residual, latent_size(c.residual_decomp_sizes)), c.residual_decomp_sizes)
    return torch.clamp(predict(self, image1, flow) + res, 0, 1)


@contract("neuralcompression.models.DVC.update")
def update(self, force=True):
    """Both entropy tables are rebuilt, whatever the first one reports."""
    a = self.motion_entropy_bottleneck.update(force=force)
    b = self.residual_entropy_bottleneck.update(force=force)
    return a or b


@contract("neuralcompression.models.DVC.forward")
def forward(self, image1, image2):
    """Training simulates the codec: same prediction, same residual, probabilities of exactly the coded latents."""
    fl, fsz = self.motion_encoder(self.motion_estimator(image1, image2))
    fq, fp = self.motion_entropy_bottleneck(fl)
    flow = self.motion_decoder(fq, fsz)
    pred = predict(self, image1, flow)
    rl, rsz = self.residual_encoder(image2 - pred)
    rq, rp = self.residual_entropy_bottleneck(rl)
    res = self.residual_decoder(rq, rsz)
    return DVCTrainOutput(flow, pred + res, res, fp, rp)


@contract("neuralcompression.models.DVC", facets=["attrs"], only=["motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder", "motion_compensation", "residual_encoder", "residual_entropy_bottleneck", "residual_decoder"])
def modules(self, coder_channels=128, motion_estimator=None, motion_encoder=None, motion_entropy_bottleneck=None, motion_decoder=None,
            motion_compensation=None, residual_encoder=None, residual_entropy_bottleneck=None, residual_decoder=None):
    """Each part is the caller's when given; the defaults agree on the channel counts on both sides of each bottleneck."""
    super().__init__()
    c = coder_channels
    self.motion_estimator = motion_estimator if motion_estimator is not None else DVCPyramidFlowEstimator()
    self.motion_encoder = motion_encoder if motion_encoder is not None else DVCCompressionEncoder(filter_channels=c, out_channels=c)
    self.motion_entropy_bottleneck = motion_entropy_bottleneck if motion_entropy_bottleneck is not None else EntropyBottleneck(c)
    self.motion_decoder = motion_decoder if motion_decoder is not None else DVCCompressionDecoder(in_channels=c, filter_channels=c)
    self.motion_compensation = motion_compensation if motion_compensation is not None else DVCMotionCompensationModel()
    self.residual_encoder = residual_encoder if residual_encoder is not None else DVCCompressionEncoder(in_channels=3, filter_channels=c, out_channels=c, kernel_size=5)
    self.residual_entropy_bottleneck = residual_entropy_bottleneck if residual_entropy_bottleneck is not None else EntropyBottleneck(c)
    self.residual_decoder = residual_decoder if residual_decoder is not None else DVCCompressionDecoder(in_channels=c, filter_channels=c, out_channels=3, kernel_size=5)
