"""Divisive normalisation: parameters are projected to their valid range before every use; the inverse multiplies by what the forward divides by."""
import torch
import torch.nn as nn
import torch.nn.functional as F


def project(self):
    self.gamma.data = self.gamma.data.clamp(min=0)
    self.beta.data = self.beta.data.clamp(min=self.beta_min)


@contract("neuralcompression.layers.SimplifiedGDN.forward")
def gdn(self, image):
    """Divides by beta + gamma * |x| with gamma >= 0 and beta >= beta_min enforced first."""
    project(self)
    return image / F.conv2d(torch.abs(image), self.gamma, self.beta)


@contract("neuralcompression.layers.SimplifiedInverseGDN.forward")
def igdn(self, image):
    """Multiplies by the same pool."""
    project(self)
    return image * F.conv2d(torch.abs(image), self.gamma, self.beta)


@contract("neuralcompression.layers.SimplifiedGDN", facets=["attrs"], only=["gamma", "beta", "beta_min"])
def gdn_ctor(self, channels, gamma_init=0.1, beta_min=1e-6):
    """Initially diagonal gamma, unit beta."""
    super().__init__()
    self.gamma = nn.Parameter(torch.eye(channels).view(channels, channels, 1, 1) * gamma_init)
    self.beta = nn.Parameter(torch.ones(channels))
    self.beta_min = beta_min


@contract("neuralcompression.layers.SimplifiedInverseGDN", facets=["attrs"], only=["gamma", "beta", "beta_min"])
def igdn_ctor(self, channels, gamma_init=0.1, beta_min=1e-6):
    super().__init__()
    self.gamma = nn.Parameter(torch.eye(channels).view(channels, channels, 1, 1) * gamma_init)
    self.beta = nn.Parameter(torch.ones(channels))
    self.beta_min = beta_min
