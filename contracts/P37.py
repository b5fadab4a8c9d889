"""VCT learning-rate schedules."""
import math

PROJECT = "torch_vct"
S = "torch_vct:utils.schedulers."


def cosine(self, b):
    return self.eta_min + (b - self.eta_min) * (1 + math.cos(math.pi * (self.last_epoch - self.ramp_len) / (self.T_max - self.ramp_len - 1))) / 2


@contract(S + "LinearRampCosineLR.get_lr")
def ramp_cosine(self):
    """The smaller of the linear ramp (reaching the base rate at the end of the ramp) and the cosine from the base rate to the minimum over the rest."""
    return [min(cosine(self, b), b * (1 + self.last_epoch) / self.ramp_len) for b in self.base_lrs]


@contract(S + "LinearRampLinearLR.get_lr")
def ramp_linear(self):
    """A linear ramp during the ramp, the base rates after it."""
    if self.last_epoch < self.ramp_len:
        return [b * (1 + self.last_epoch) / self.ramp_len for b in self.base_lrs]
    return self.base_lrs


@contract(S + "LinearWarmUpCosineLR.get_lr")
def warm_cosine(self):
    """The base rates during warm-up, then the cosine."""
    if self.last_epoch < self.ramp_len:
        return self.base_lrs
    return [cosine(self, b) for b in self.base_lrs]


@contract(S + "LinearRampCosineLR", facets=["attrs", "effects"], only=["T_max", "eta_min", "ramp_len"])
def ramp_cosine_build(self, optimizer, T_max, eta_min=0, last_epoch=-1, ramp_len=10):
    """Settings are stored before the first rate is computed."""
    self.T_max, self.eta_min, self.ramp_len = T_max, eta_min, ramp_len
    super().__init__(optimizer, last_epoch)


@contract(S + "LinearRampLinearLR", facets=["attrs", "effects"], only=["T_max", "ramp_len"])
def ramp_linear_build(self, optimizer, T_max, last_epoch=-1, ramp_len=10):
    self.T_max, self.ramp_len = T_max, ramp_len
    super().__init__(optimizer, last_epoch)


@contract(S + "LinearWarmUpCosineLR", facets=["attrs", "effects"], only=["T_max", "eta_min", "ramp_len"])
def warm_cosine_build(self, optimizer, T_max, eta_min=0, last_epoch=-1, ramp_len=10):
    self.T_max, self.eta_min, self.ramp_len = T_max, eta_min, ramp_len
    super().__init__(optimizer, last_epoch)
