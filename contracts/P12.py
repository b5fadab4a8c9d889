"""Vector quantisation bottleneck."""
import math
import torch
import torch.nn as nn
import torch.nn.functional as F
from neuralcompression.layers._q_bottleneck import VQOutput
from dataclasses import replace


@contract("neuralcompression.layers._q_bottleneck.QBottleneck.quantize_vectors", ranks={"preq_latents": 4, "codebook": 2}, facets=["outcome", "effects"])
def quantize(self, preq_latents, codebook, probabilistic=False):
    """Each spatial vector goes to its nearest (normalised) codebook entry in Euclidean distance, is put back at its own position, passes gradients
    straight through, and the commitment and codebook losses each stop the gradient on the other side."""
    b, c, h, w = preq_latents.shape
    flat = preq_latents.permute(0, 2, 3, 1).reshape(-1, c)
    if self.normalize_codebook:
        codebook = F.normalize(codebook, dim=1)
    dist = torch.sum((codebook.unsqueeze(0) - flat.unsqueeze(1)) ** 2, dim=2)
    if probabilistic:
        # one index per vector, drawn with probability inversely proportional to the distance
        inv = 1 / (dist + 1e-7)
        over = torch.cumsum(inv / torch.sum(inv, dim=1, keepdim=True), dim=1)
        over = over - torch.rand_like(over[:, :1])
        over[over < 0] = 1.0
        idx = torch.argmin(over, dim=1)
    else:
        idx = torch.argmin(dist, dim=1)
    q = codebook[idx].view(b, h, w, c).permute(0, 3, 1, 2).contiguous()
    return VQOutput(latent=preq_latents + (q - preq_latents).detach(), prequantized_latent=preq_latents,
                    commitment_loss=F.mse_loss(q.detach(), preq_latents), embedding_loss=F.mse_loss(q, preq_latents.detach()),
                    indices=idx, distances=dist)


def book(size, dim, init_distribution):
    if init_distribution == "uniform":
        return torch.empty(size, dim).uniform_(-1.0 / size, 1.0 / dim)
    if init_distribution == "normal":
        return torch.randn(size, dim)
    raise ValueError


@contract("neuralcompression.layers._q_bottleneck.QBottleneck", facets=["raises", "attrs", "effects"], only=["normalize_codebook", "codebooks", "perplexities", "max_hits", "percentage_hits"])
def q_ctor(self, codebook_sizes, hidden_dims, init_distribution="uniform", normalize_codebook=True):
    """One codebook (size, dimension) and one zeroed hit counter per level, as long as the codebook, in the module's state; per-level statistics start at zero."""
    super().__init__()
    self.normalize_codebook = normalize_codebook
    self.codebooks = nn.ParameterList([nn.Parameter(book(n, d, init_distribution)) for n, d in zip(codebook_sizes, hidden_dims)])
    for i, c in enumerate(self.codebooks):
        self.register_buffer(f"codebook_hits_{i}", torch.zeros(c.shape[0], dtype=torch.long))
    self.register_buffer("perplexities", torch.zeros(len(self.codebooks)))
    self.register_buffer("max_hits", torch.zeros(len(self.codebooks)))
    self.register_buffer("percentage_hits", torch.zeros(len(self.codebooks)))


@contract("neuralcompression.layers.VQBottleneck", facets=["raises", "attrs"], only=["normalize_codebook", "codebooks", "perplexities", "max_hits", "percentage_hits"])
def vq_ctor(self, codebook_size, vector_length, init_distribution="uniform"):
    """A single level."""
    super().__init__(codebook_sizes=[codebook_size], hidden_dims=[vector_length], init_distribution=init_distribution)


@contract("neuralcompression.layers.VQBottleneck.forward", opaque=("neuralcompression.layers._q_bottleneck.QBottleneck.quantize_vectors",))
def vq(self, output):
    """Coding cost is (number of vectors) * log2(codebook size) / 8 bytes; hit counts record every index; the other fields of the record survive."""
    if output.latent is None:
        raise ValueError
    s = output.latent.shape
    nbytes = int(s[0] * s[-2] * s[-1] * math.log2(self.codebooks[0].shape[0]) / 8)
    q = self.quantize_vectors(preq_latents=output.latent, codebook=self.codebooks[0], probabilistic=False)
    getattr(self, "codebook_hits_0").index_add_(0, q.indices, torch.ones_like(q.indices, dtype=torch.long))
    return replace(output, latent=q.latent, prequantized_latent=q.prequantized_latent, commitment_loss=q.commitment_loss, embedding_loss=q.embedding_loss,
                   num_bytes=nbytes, quantize_distances=q.distances, indices=q.indices)


@contract("neuralcompression.layers._q_bottleneck.QBottleneck.reset_hits")
def reset(self):
    """Every hit counter becomes zero."""
    for i in range(len(self.codebooks)):
        getattr(self, f"codebook_hits_{i}").zero_()


@contract("neuralcompression.layers._q_bottleneck.QBottleneck.update_metrics", facets=["effects", "attrs"])
def metrics(self):
    """Per-level usage statistics come from that level's counters."""
    for i in range(len(self.percentage_hits)):
        h = getattr(self, f"codebook_hits_{i}")
        self.percentage_hits[i] = torch.sum(h != 0) / h.numel()
        self.max_hits[i] = torch.max(h)
        p = h / torch.sum(h)
        self.perplexities[i] = 2 ** (-torch.sum(p * torch.log2(p + 1e-7)))
