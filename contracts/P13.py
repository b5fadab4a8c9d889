"""Latent-shaping layers."""
import torch
import torch.nn as nn
import torch.nn.functional as F


@contract("neuralcompression.layers.ChannelNorm2D.forward")
def channel_norm(self, x):
    """Every position is normalised over its own channels only (no batch or spatial statistics), then scaled and shifted per channel."""
    y = (x - torch.mean(x, dim=1, keepdim=True)) * torch.rsqrt(torch.var(x, dim=1, keepdim=True) + self.epsilon)
    return self.gamma * y + self.beta if self.affine is True else y


@contract("neuralcompression.layers.ChannelNorm2D", only=["gamma", "beta", "epsilon", "affine"], facets=["outcome", "attrs"], ints=["ctor.input_channels"], cases=[{"affine": True}, {"affine": False}])
def channel_norm_ctor(self, input_channels, epsilon=1e-3, affine=True):
    """Single-channel inputs (zero variance) are refused; the affine map starts as the identity."""
    super().__init__()
    if input_channels < 2:
        raise ValueError
    self.epsilon = epsilon
    self.affine = affine
    if affine:
        self.gamma = nn.Parameter(torch.ones(1, input_channels, 1, 1))
        self.beta = nn.Parameter(torch.zeros(1, input_channels, 1, 1))


@contract("neuralcompression.layers.NormalizeLatent.forward")
def normalize(self, output):
    """The latent is normalised along channels before the child sees it; a missing latent is refused."""
    if output.latent is None:
        raise ValueError
    output.latent = F.normalize(output.latent, dim=1)
    return self.child(output) if self.child is not None else output


@contract("neuralcompression.layers.ProjectLatent.forward")
def project(self, output):
    """Projection in, child, projection out."""
    if self.child is None:
        output.latent = self.output_conv(self.input_conv(output.latent))
        return output
    output.latent = self.input_conv(output.latent)
    r = self.child(output)
    r.latent = self.output_conv(r.latent)
    return r


@contract("neuralcompression.layers.ProjectLatent", only=["input_conv", "output_conv", "child"], facets=["attrs"])
def project_ctor(self, input_dim, output_dim, child=None):
    """The output projection inverts the channel change of the input projection; both are pointwise."""
    super().__init__()
    self.child = child
    self.input_conv = nn.Conv2d(input_dim, output_dim, kernel_size=1)
    self.output_conv = nn.Conv2d(output_dim, input_dim, kernel_size=1)


@contract("neuralcompression.layers._xca.XCA.forward", rank=3)
def xca(self, x):
    """Attention mixes channels within a head, never positions across the batch; queries and keys are unit vectors over positions."""
    B, N, C = x.shape
    qkv = self.qkv(x).reshape(B, N, 3, self.num_heads, C // self.num_heads).permute(2, 0, 3, 4, 1)
    q, k, v = F.normalize(qkv[0], dim=-1), F.normalize(qkv[1], dim=-1), qkv[2]
    a = self.attn_drop(((q @ k.transpose(-2, -1)) * self.temperature).softmax(dim=-1))
    return self.proj_drop(self.proj((a @ v).permute(0, 3, 1, 2).reshape(B, N, C)))


@contract("neuralcompression.layers._xca.XCA", facets=["attrs"], only=["num_heads", "temperature", "qkv", "attn_drop", "proj", "proj_drop"])
def xca_ctor(self, dim, num_heads=8, qkv_bias=False, attn_drop=0.0, proj_drop=0.0):
    super().__init__()
    self.num_heads = num_heads
    self.temperature = nn.Parameter(torch.ones(num_heads, 1, 1))
    self.qkv = nn.Linear(dim, dim * 3, bias=qkv_bias)
    self.attn_drop = nn.Dropout(attn_drop)
    self.proj = nn.Linear(dim, dim)
    self.proj_drop = nn.Dropout(proj_drop)
