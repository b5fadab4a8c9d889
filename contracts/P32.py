"""VCT temporal entropy model."""
import torch
import torch.nn as nn
from neural.entropy_model import PreviousLatent, TemporalEntropyModelOut
from neural.bottlenecks import GsnConditionalLocScaleShift
from neural.entropy_model_layers import EncoderSection, LearnedPosition, StartSym, Transformer
from neural.layers_utils import make_embedding
from neural.patcher import Patcher

PROJECT = "torch_vct"
E = "torch_vct:neural.entropy_model.VCTEntropyModel"
PARTS = ("torch_vct:neural.bottlenecks.GsnConditionalLocScaleShift", "torch_vct:neural.entropy_model_layers.EncoderSection", "torch_vct:neural.entropy_model_layers.LearnedPosition",
         "torch_vct:neural.entropy_model_layers.StartSym", "torch_vct:neural.entropy_model_layers.Transformer", "torch_vct:neural.patcher.Patcher", "torch_vct:neural.layers_utils.make_embedding")
SUB = ("torch_vct:neural.bottlenecks.GsnConditionalLocScaleShift.compress", "torch_vct:neural.bottlenecks.GsnConditionalLocScaleShift.decompress", "torch_vct:neural.patcher.Patcher.forward",
       "torch_vct:neural.patcher.Patcher.unpatch", "torch_vct:neural.entropy_model.VCTEntropyModel._get_transformer_output")


@contract(E, facets=["raises", "attrs"], opaque=PARTS, only=["num_channels", "window_size_enc", "window_size_dec", "d_model", "bottleneck", "context_len", "encoder_sep", "encoder_joint", "seq_len_dec",
          "seq_len_enc", "patcher", "learned_zero", "encoder_embedding", "decoder_embedding", "enc_position_sep", "enc_position_joint", "dec_position", "post_embedding_layernorm", "decoder", "mean_head", "scale_head"])
def build(self, num_channels=192, context_len=2, window_size_enc=8, window_size_dec=4, num_layers_encoder_sep=3, num_layers_encoder_joint=2, num_layers_decoder=5, d_model=768, num_head=16,
          mlp_expansion=4, drop_out_enc=0.0, drop_out_dec=0.0):
    """Patches of the decoder window with stride of that window; joint positions cover all context latents; the decoder is masked; each head predicts one value per channel."""
    super().__init__()
    if window_size_enc < window_size_dec:
        raise ValueError
    if num_channels < 0:
        raise ValueError
    self.num_channels, self.window_size_enc, self.window_size_dec, self.d_model, self.context_len = num_channels, window_size_enc, window_size_dec, d_model, context_len
    self.bottleneck = GsnConditionalLocScaleShift(num_scales=256, num_means=100, min_scale=0.01, tail_mass=2 ** -8)
    self.encoder_sep = EncoderSection(num_layers=num_layers_encoder_sep, num_heads=num_head, hidden_dim=d_model, mlp_expansion=mlp_expansion, dropout=drop_out_enc)
    self.encoder_joint = EncoderSection(num_layers=num_layers_encoder_joint, num_heads=num_head, hidden_dim=d_model, mlp_expansion=mlp_expansion, dropout=drop_out_enc)
    self.seq_len_dec, self.seq_len_enc = window_size_dec ** 2, window_size_enc ** 2
    self.encoder_embedding = make_embedding(input_dim=num_channels, hidden_dim=d_model)
    self.decoder_embedding = make_embedding(input_dim=num_channels, hidden_dim=d_model)
    self.patcher = Patcher(window_size_dec, "reflect")
    self.learned_zero = StartSym(hidden_dim=num_channels)
    self.enc_position_sep = LearnedPosition(seq_length=window_size_enc ** 2, hidden_dim=d_model)
    self.enc_position_joint = LearnedPosition(seq_length=window_size_enc ** 2 * context_len, hidden_dim=d_model)
    self.dec_position = LearnedPosition(seq_length=window_size_dec ** 2, hidden_dim=d_model)
    self.post_embedding_layernorm = nn.LayerNorm(d_model, eps=1e-6)
    self.decoder = Transformer(seq_length=window_size_dec ** 2, num_layers=num_layers_decoder, num_heads=num_head, hidden_dim=d_model, mlp_expansion=mlp_expansion, dropout=drop_out_dec, is_decoder=True)
    self.mean_head = nn.Sequential(nn.Linear(d_model, d_model), nn.LeakyReLU(), nn.Linear(d_model, d_model), nn.LeakyReLU(), nn.Linear(d_model, num_channels))
    self.scale_head = nn.Sequential(nn.Linear(d_model, d_model), nn.LeakyReLU(), nn.Linear(d_model, d_model), nn.LeakyReLU(), nn.Linear(d_model, num_channels))


@contract(E + ".process_previous_latent_q")
def process(self, previous_latent_quantized):
    """A previous latent is cut into encoder windows, scaled, embedded, given positions and encoded; the latent itself is kept next to it."""
    p, _ = self.patcher(previous_latent_quantized, self.window_size_enc)
    p = self.encoder_sep(self.enc_position_sep(self.post_embedding_layernorm(self.encoder_embedding(p / 35.0))))
    return PreviousLatent(previous_latent_quantized, p)


@contract(E + "._get_transformer_output")
def transformer(self, *, encoded_patched, latent_q_patched):
    """The decoder sees the latent shifted by one behind the start symbol, never the symbol it predicts, and the jointly encoded context; mean and scale come from their own heads."""
    if encoded_patched.shape[-1] != self.d_model:
        raise ValueError
    x = self.learned_zero(latent_q_patched)
    x = self.dec_position(self.post_embedding_layernorm(self.decoder_embedding(x / 35.0)))
    c = self.encoder_joint(self.enc_position_joint(encoded_patched))
    d = self.decoder(input=x, encoder_output=c)
    return self.mean_head(d), self.scale_head(d), d


@contract(E + "._get_encoded_seqs", cases=[{"ctor.context_len": 1}, {"ctor.context_len": 2}, {"ctor.context_len": 3}, {"ctor.context_len": 4}])
def encoded_seqs(self, previous_latents):
    """Short histories are filled up by repeating the oldest; histories of other lengths are refused."""
    s = [p.processed for p in previous_latents]
    if len(s) < self.context_len:
        if self.context_len == 2:
            return s * 2
        if self.context_len == 3:
            return s * 3 if len(s) == 1 else [s[0]] * 2 + [s[1]]
        raise ValueError
    return s


def ste(x):
    return (torch.round(x) - x).detach() + x


@contract(E + ".forward", opaque=SUB)
def forward(self, latent_unquantized, previous_latents):
    """Predicts from the rounded latent and the context, codes the latent itself with the predicted mean and scale, puts patches back and cuts to the latent's size; mismatching dimensions are refused."""
    H, W = latent_unquantized.shape[-2], latent_unquantized.shape[-1]
    s = self._get_encoded_seqs(previous_latents)
    if s[0].shape[2] != self.d_model:
        raise ValueError
    q, (nh, nw) = self.patcher(ste(latent_unquantized), self.window_size_dec)
    if q.shape[2] != self.num_channels:
        raise ValueError
    if q.shape[0] != s[0].shape[0]:
        raise ValueError
    if q.shape[1] != self.window_size_dec ** 2:
        raise AssertionError
    m, v, d = self._get_transformer_output(encoded_patched=torch.cat(s, dim=-2), latent_q_patched=q)
    if m.shape != q.shape:
        raise AssertionError
    f = self.patcher.unpatch(x_patched=(d, (nh, nw)), crop=(H, W), channels_last=True)
    u = self.patcher(latent_unquantized, self.window_size_dec).tensor
    if u.shape != v.shape:
        raise AssertionError
    o, l = self.bottleneck(inputs=u, scales=v, means=m)
    if o.shape != l.shape:
        raise AssertionError
    o = self.patcher.unpatch((o, (nh, nw)), crop=(H, W), channels_last=True)
    if o.shape != latent_unquantized.shape:
        raise AssertionError
    return TemporalEntropyModelOut(o, l, f)


@contract(E + ".forward", facets=["returned"], opaque=SUB, cases=[{"ctor.context_len": 1}, {"ctor.context_len": 2}])
def forward_values(self, latent_unquantized, previous_latents):
    """Whenever it answers: predicts from the rounded latent and the context, codes the latent itself with the predicted mean and scale, puts patches back and cuts to the latent's size; mismatching dimensions are refused."""
    H, W = latent_unquantized.shape[-2], latent_unquantized.shape[-1]
    s = self._get_encoded_seqs(previous_latents)
    if s[0].shape[2] != self.d_model:
        raise ValueError
    q, (nh, nw) = self.patcher(ste(latent_unquantized), self.window_size_dec)
    if q.shape[2] != self.num_channels:
        raise ValueError
    if q.shape[0] != s[0].shape[0]:
        raise ValueError
    if q.shape[1] != self.window_size_dec ** 2:
        raise AssertionError
    m, v, d = self._get_transformer_output(encoded_patched=torch.cat(s, dim=-2), latent_q_patched=q)
    if m.shape != q.shape:
        raise AssertionError
    f = self.patcher.unpatch(x_patched=(d, (nh, nw)), crop=(H, W), channels_last=True)
    u = self.patcher(latent_unquantized, self.window_size_dec).tensor
    if u.shape != v.shape:
        raise AssertionError
    o, l = self.bottleneck(inputs=u, scales=v, means=m)
    if o.shape != l.shape:
        raise AssertionError
    o = self.patcher.unpatch((o, (nh, nw)), crop=(H, W), channels_last=True)
    if o.shape != latent_unquantized.shape:
        raise AssertionError
    return TemporalEntropyModelOut(o, l, f)


@contract(E + "._encode", opaque=SUB, cases=[{"ctor.window_size_dec": 1, "dim.latent_patched.1": 1}, {"ctor.window_size_dec": 2, "dim.latent_patched.1": 4}], ranks={"latent_patched": 3})
def encode(self, latent_patched, encoded):
    """Symbol i is coded with the mean and scale predicted from the quantised symbols before i; strings in symbol order."""
    n = self.window_size_dec ** 2
    strings = []
    q = torch.full_like(latent_patched, fill_value=10.0)
    m = torch.full_like(latent_patched, fill_value=100.0)
    v = torch.full_like(latent_patched, fill_value=100.0)
    d = torch.full((*latent_patched.shape[:-1], self.d_model), fill_value=100.0, dtype=torch.float32, device=q.device)
    for i in range(n):
        mi, vi, di = self._get_transformer_output(encoded_patched=encoded, latent_q_patched=q)
        m[:, i, :] = mi[:, i, :]
        v[:, i, :] = vi[:, i, :]
        d[:, i, :] = di[:, i, :]
        qi, s = self.bottleneck.compress(inputs=latent_patched[:, i, :].unsqueeze(0), scales=vi[:, i, :].unsqueeze(0), means=mi[:, i, :].unsqueeze(0))
        strings.append(s)
        q[:, i, :] = qi.squeeze(0)
    return strings, {"means": m, "scales": v, "dec_output": d, "quantized": q}


@contract(E + "._decode", facets=["outcome"], opaque=SUB, cases=[{"ctor.window_size_dec": 1, "use_output_from_encode": False, "dimattr.tensor.1": 1}, {"ctor.window_size_dec": 2, "use_output_from_encode": False, "dimattr.tensor.1": 4},
                                             {"ctor.window_size_dec": 2, "use_output_from_encode": True, "dimattr.tensor.1": 4}])
def decode(self, strings, encoded, shape, encode_means, encode_scales, use_output_from_encode=True):
    """Mirror image of encoding: string i is decoded with the mean and scale predicted from the symbols decoded before it (or the encoder's, if asked), and put at place i; every string is used."""
    n = self.window_size_dec ** 2
    H, W, C = shape
    f = self.patcher(torch.ones((1, C, H, W), device=encode_means.device), self.window_size_dec)
    x = torch.full_like(f.tensor, fill_value=10.0)
    for i in range(n):
        m, v, _ = self._get_transformer_output(encoded_patched=encoded, latent_q_patched=x)
        m, v = m[:, i, :], v[:, i, :]
        if use_output_from_encode:
            m, v = encode_means[:, i, :], encode_scales[:, i, :]
        x[:, i, :] = self.bottleneck.decompress(strings=strings.pop(0), scales=v.unsqueeze(0), means=m.unsqueeze(0))
    if strings:
        raise AssertionError
    return self.patcher.unpatch(x_patched=(x, f.num_patches), crop=(H, W), channels_last=True)


@contract(E + ".compress", facets=["outcome"], opaque=SUB + ("torch_vct:neural.entropy_model.VCTEntropyModel._encode", "torch_vct:neural.entropy_model.VCTEntropyModel._decode", "torch_vct:neural.entropy_model.VCTEntropyModel.validate_causal"))
def compress(self, *, latent_unquantized, previous_latents, run_decode=False, validate_causal=False):
    """One clip only; bits are eight per byte over all strings; the returned latent is the decoded one (checked against the encoder's) or, if decoding is skipped, the rounded latent."""
    B, C, H, W = latent_unquantized.shape
    if B != 1:
        raise AssertionError
    c = torch.cat(self._get_encoded_seqs(previous_latents), -2)
    p, n = self.patcher(latent_unquantized, self.window_size_dec)
    if validate_causal:
        self.validate_causal(latent_q_patched=p, encoded=c)
    strings, extra = self._encode(p, c)
    m, v, d, q = extra.values()
    f = self.patcher.unpatch((d, (n[0], n[1])), crop=(H, W), channels_last=True)
    bits = torch.tensor([sum(len(s[0]) * 8 for s in strings)], dtype=torch.float32)
    if run_decode:
        x = self._decode(strings, c, shape=(H, W, C), encode_means=m, encode_scales=v, use_output_from_encode=True)
        y = self.patcher.unpatch(x_patched=(q, (n[0], n[1])), crop=(H, W), channels_last=True)
        if not (x == y).all():
            raise AssertionError
    else:
        x = torch.round(latent_unquantized)
    return TemporalEntropyModelOut(x, bits, f)


@contract(E + ".update", facets=["outcome", "effects"], opaque=("torch_vct:neural.bottlenecks.GsnConditionalLocScaleShift.update",))
def update(self, force=False):
    """Updates the bottleneck's tables."""
    return self.bottleneck.update(force=force)
