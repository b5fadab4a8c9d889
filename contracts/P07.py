"""Optimiser parameter groups."""


@contract("neuralcompression.models.HyperpriorAutoencoderBase.collect_parameters", facets=["outcome", "effects"])
def collect(self):
    """Every trainable parameter lands in exactly one of the two groups: quantiles in the second, all else in the first; frozen ones in neither."""
    return ([p for n, p in self.named_parameters() if p.requires_grad and not n.endswith(".quantiles")],
            [p for n, p in self.named_parameters() if p.requires_grad and n.endswith(".quantiles")])
