"""Learning-rate schedules."""
import math


@contract("neuralcompression.optim.IdentitySchedule", facets=["effects", "outcome"])
def identity(self, optimizer):
    """Never changes the rate."""
    super().__init__(optimizer=optimizer, lr_lambda=lambda step: 1.0)


@contract("neuralcompression.optim.RampCosineLRSchedule", facets=["effects", "outcome"])
def ramp_cosine(self, optimizer, num_ramp_steps, num_max_steps, min_val=1e-12):
    """Linear ramp to one, then a quarter cosine, never below the minimum."""
    def f(step):
        if step < num_ramp_steps:
            return max(min(step / num_ramp_steps, 1.0), min_val)
        return max(math.cos((step - num_ramp_steps) / num_max_steps * math.pi / 2), min_val)
    super().__init__(optimizer=optimizer, lr_lambda=f)


@contract("neuralcompression.optim.RampConstCosineLRSchedule", facets=["effects", "outcome"])
def ramp_const_cosine(self, optimizer, num_max_steps, num_ramp_steps=0, num_cosine_steps=0, min_val=1e-12):
    """Linear ramp, constant one, then a quarter cosine over exactly the last steps, never below the minimum."""
    def f(step):
        if step < num_ramp_steps:
            return max(min(step / num_ramp_steps, 1.0), min_val)
        c = step - (num_max_steps - num_cosine_steps)
        if c > 0:
            return max(math.cos(c / num_cosine_steps * math.pi / 2), min_val)
        return 1.0
    super().__init__(optimizer=optimizer, lr_lambda=f)
